[
('C17 C18 C19 C20 C22', [('src/generic_rigid_body_system.cpp', '    for (int i = 0, j_f = 0; i < m; ++i) {\n        Constraint *constraint = m_constraints[i];\n\n        const int n_f = constraint->getConstraintCount();\n        for (int j = 0; j < n_f; ++j, ++j_f) {\n            for (int k = 0; k < constraint->m_bodyCount; ++k) {\n                const int body = constraint->m_bodies[k]->index;\n                if (body == -1) continue;\n\n                m_state.a_x[body] += m_state.r_x[j_f * 2 + k];\n                m_state.a_y[body] += m_state.r_y[j_f * 2 + k];\n                m_state.a_theta[body] += m_state.r_t[j_f * 2 + k];\n            }\n        }\n    }\n', '    int row = 0;\n    for (Constraint *constraint : m_constraints) {\n        for (int j = 0; j < constraint->getConstraintCount(); ++j) {\n            const int base = 2 * (row++);\n            for (int k = 0; k < constraint->m_bodyCount; ++k) {\n                const RigidBody *target = constraint->m_bodies[k];\n                if (target->index != -1) {\n                    m_state.a_x[target->index] += m_state.r_x[base + k];\n                    m_state.a_y[target->index] += m_state.r_y[base + k];\n                    m_state.a_theta[target->index] += m_state.r_t[base + k];\n                }\n            }\n        }\n    }\n')]),
('C17 C18 C19 C20 C22', [('src/optimized_nsv_rigid_body_system.cpp', '    for (int i = 0, j_f = 0; i < m; ++i) {\n        Constraint *constraint = m_constraints[i];\n\n        const int n_f = constraint->getConstraintCount();\n        for (int j = 0; j < n_f; ++j, ++j_f) {\n            for (int k = 0; k < constraint->m_bodyCount; ++k) {\n                const int body = constraint->m_bodies[k]->index;\n                if (body == -1) continue;\n\n                m_state.a_x[body] += m_state.r_x[j_f * 2 + k];\n                m_state.a_y[body] += m_state.r_y[j_f * 2 + k];\n                m_state.a_theta[body] += m_state.r_t[j_f * 2 + k];\n            }\n        }\n    }\n', '    int row = 0;\n    for (Constraint *constraint : m_constraints) {\n        for (int j = 0; j < constraint->getConstraintCount(); ++j) {\n            const int base = 2 * (row++);\n            for (int k = 0; k < constraint->m_bodyCount; ++k) {\n                const RigidBody *target = constraint->m_bodies[k];\n                if (target->index != -1) {\n                    m_state.a_x[target->index] += m_state.r_x[base + k];\n                    m_state.a_y[target->index] += m_state.r_y[base + k];\n                    m_state.a_theta[target->index] += m_state.r_t[base + k];\n                }\n            }\n        }\n    }\n')]),
('C17 C18 C19 C20 C22', [('src/optimized_nsv_rigid_body_system.cpp', '    m_iv.q_dot.resize(1, n * 3);\n    for (int i = 0; i < n; ++i) {\n        m_iv.q_dot.set(0, i * 3 + 0, m_state.v_x[i]);\n        m_iv.q_dot.set(0, i * 3 + 1, m_state.v_y[i]);\n        m_iv.q_dot.set(0, i * 3 + 2, m_state.v_theta[i]);\n    }\n\n    m_iv.F_ext.initialize(1, 3 * n, 0.0);\n    for (int i = 0; i < n; ++i) {\n        m_iv.F_ext.set(0, i * 3 + 0, m_state.f_x[i]);\n', '    m_iv.q_dot.resize(1, n * 3);\n    m_iv.F_ext.initialize(1, 3 * n, 0.0);\n    for (int i = 0; i < n; ++i) {\n        m_iv.q_dot.set(0, i * 3 + 0, m_state.v_x[i]);\n        m_iv.q_dot.set(0, i * 3 + 1, m_state.v_y[i]);\n        m_iv.q_dot.set(0, i * 3 + 2, m_state.v_theta[i]);\n        m_iv.F_ext.set(0, i * 3 + 0, m_state.f_x[i]);\n')]),
('C17 C18 C19 C20 C22', [('src/optimized_nsv_rigid_body_system.cpp', '            for (int i = 0; i < m_constraints[j]->m_bodyCount * 3; ++i) {\n                const int index = m_constraints[j]->m_bodies[i / 3]->index;\n\n                if (index == -1) continue;\n\n                m_iv.J_sparse.set(j_f, i / 3, i % 3,\n                        constraintOutput.J[k][i]);\n            }\n', '            for (int i = 0; i < m_constraints[j]->m_bodyCount; ++i) {\n                if (m_constraints[j]->m_bodies[i]->index == -1) continue;\n                const double *J_i = &constraintOutput.J[k][i * 3];\n                m_iv.J_sparse.set(j_f, i, 0, J_i[0]);\n                m_iv.J_sparse.set(j_f, i, 1, J_i[1]);\n                m_iv.J_sparse.set(j_f, i, 2, J_i[2]);\n            }\n')]),
('C17 C18 C19 C20 C22', [('src/optimized_nsv_rigid_body_system.cpp', '    for (int i = 0; i < n; ++i) {\n        m_state.a_x[i] = m_iv.F_ext.get(0, i * 3 + 0);\n        m_state.a_y[i] = m_iv.F_ext.get(0, i * 3 + 1);\n        m_state.a_theta[i] = m_iv.F_ext.get(0, i * 3 + 2);\n    }\n', ''), ('src/optimized_nsv_rigid_body_system.cpp', '    for (int i = 0; i < m_f; ++i) {\n        for (int j = 0; j < 2; ++j) {\n            m_state.r_x[i * 2 + j] = m_iv.sreg0.get(i, j, 0);\n            m_state.r_y[i * 2 + j] = m_iv.sreg0.get(i, j, 1);\n            m_state.r_t[i * 2 + j] = m_iv.sreg0.get(i, j, 2);\n        }\n    }\n', '    for (int i = 0; i < n; ++i) {\n        m_state.a_x[i] = m_iv.F_ext.get(0, i * 3 + 0);\n        m_state.a_y[i] = m_iv.F_ext.get(0, i * 3 + 1);\n        m_state.a_theta[i] = m_iv.F_ext.get(0, i * 3 + 2);\n    }\n\n    for (int i = 0; i < m_f; ++i) {\n        for (int j = 0; j < 2; ++j) {\n            m_state.r_x[i * 2 + j] = m_iv.sreg0.get(i, j, 0);\n            m_state.r_y[i * 2 + j] = m_iv.sreg0.get(i, j, 1);\n            m_state.r_t[i * 2 + j] = m_iv.sreg0.get(i, j, 2);\n        }\n    }\n')]),
('C17 C18 C19 C20 C22', [('src/generic_rigid_body_system.cpp', '    for (int i = 0; i < n; ++i) {\n        const double invMass = m_iv.M_inv.get(0, i * 3 + 0);\n        const double invInertia = m_iv.M_inv.get(0, i * 3 + 2);\n\n        m_state.a_x[i] *= invMass;\n        m_state.a_y[i] *= invMass;\n        m_state.a_theta[i] *= invInertia;\n    }\n', '    for (int i = n - 1; i >= 0; --i) {\n        const double invMass = m_iv.M_inv.get(0, i * 3 + 0);\n        const double invInertia = m_iv.M_inv.get(0, i * 3 + 2);\n\n        m_state.a_x[i] *= invMass;\n        m_state.a_y[i] *= invMass;\n        m_state.a_theta[i] *= invInertia;\n    }\n')]),
('C17 C18 C19 C20 C22', [('src/optimized_nsv_rigid_body_system.cpp', '            m_iv.limits.set(0, j_f, constraintOutput.limits[k][0] * dt);\n            m_iv.limits.set(1, j_f, constraintOutput.limits[k][1] * dt);\n', '            for (int side = 0; side < 2; ++side) {\n                m_iv.limits.set(side, j_f, dt * constraintOutput.limits[k][side]);\n            }\n')]),
('C17 C18 C19 C20 C22', [('src/optimized_nsv_rigid_body_system.cpp', '    m_iv.reg0.add(m_iv.v_bias, &m_iv.reg1);\n    m_iv.reg1.add(m_iv.b_err, &m_iv.reg0);\n    m_iv.reg0.negate(&m_iv.right);', '    m_iv.reg0.negate(&m_iv.reg1);\n    m_iv.reg1.subtract(m_iv.b_err, &m_iv.reg0);\n    m_iv.reg0.subtract(m_iv.v_bias, &m_iv.right);')]),
('C17 C18 C19 C20 C22', [('src/generic_rigid_body_system.cpp', '    m_iv.reg1.subtract(m_iv.reg0, &m_iv.reg2);\n    m_iv.reg2.subtract(m_iv.ks, &m_iv.reg0);\n    m_iv.reg0.subtract(m_iv.kd, &m_iv.right);', '    m_iv.right.initialize(1, m_f);\n    for (int i = 0; i < m_f; ++i) {\n        const double inertial = m_iv.reg1.get(0, i) - m_iv.reg0.get(0, i);\n        m_iv.right.set(0, i, inertial - (m_iv.ks.get(0, i) + m_iv.kd.get(0, i)));\n    }')]),
('C17 C18 C19 C20 C22', [('src/generic_rigid_body_system.cpp', '                m_iv.ks.set(0, j_f, constraintOutput.ks[k]);\n                m_iv.kd.set(0, j_f, constraintOutput.kd[k]);\n                m_iv.C.set(0, j_f, constraintOutput.C[k]);\n                m_iv.v_bias.set(0, j_f, constraintOutput.v_bias[k]);\n            }\n', '            }\n\n            m_iv.ks.set(0, j_f, constraintOutput.ks[k]);\n            m_iv.kd.set(0, j_f, constraintOutput.kd[k]);\n            m_iv.C.set(0, j_f, constraintOutput.C[k]);\n            m_iv.v_bias.set(0, j_f, constraintOutput.v_bias[k]);\n')]),
('C17 C18 C19 C20 C22', [('src/optimized_nsv_rigid_body_system.cpp', '    bool solvable = false;\n    if (!m_sleSolver->supportsLimits()) {\n', '    const bool limited = m_sleSolver->supportsLimits();\n    bool solvable = false;\n    if (limited == false) {\n')]),
('C17 C18 C19 C20 C22', [('src/optimized_nsv_rigid_body_system.cpp', '    m_iv.lambda.scale(1 / dt, &m_iv.reg0);\n    m_iv.J_sparse.leftScale(m_iv.reg0, &m_iv.sreg0);\n', '    m_iv.J_sparse.leftScale(m_iv.lambda, &m_iv.sreg0);\n    const double invDt = 1 / dt;\n'), ('src/optimized_nsv_rigid_body_system.cpp', '    for (int i = 0; i < m_f; ++i) {\n        for (int j = 0; j < 2; ++j) {\n            m_state.r_x[i * 2 + j] = m_iv.sreg0.get(i, j, 0);\n            m_state.r_y[i * 2 + j] = m_iv.sreg0.get(i, j, 1);\n            m_state.r_t[i * 2 + j] = m_iv.sreg0.get(i, j, 2);\n        }\n    }\n', '    for (int i = 0; i < m_f; ++i) {\n        for (int j = 0; j < 2; ++j) {\n            m_state.r_x[i * 2 + j] = invDt * m_iv.sreg0.get(i, j, 0);\n            m_state.r_y[i * 2 + j] = invDt * m_iv.sreg0.get(i, j, 1);\n            m_state.r_t[i * 2 + j] = invDt * m_iv.sreg0.get(i, j, 2);\n        }\n    }\n')]),
('C17 C18 C19 C20 C22', [('src/optimized_nsv_rigid_body_system.cpp', '    for (int i = 0; i < n; ++i) {\n        const double invMass = m_iv.M_inv.get(0, i * 3 + 0);\n        const double invInertia = m_iv.M_inv.get(0, i * 3 + 2);\n\n        m_state.a_x[i] *= invMass;\n        m_state.a_y[i] *= invMass;\n        m_state.a_theta[i] *= invInertia;\n    }\n', '    for (int i = 0; i < n; ++i) {\n        const double invMass = m_iv.M_inv.get(0, i * 3 + 1);\n        const double invInertia = m_iv.M_inv.get(0, i * 3 + 2);\n\n        m_state.a_x[i] *= invMass;\n        m_state.a_y[i] *= invMass;\n        m_state.a_theta[i] *= invInertia;\n    }\n')]),
]
