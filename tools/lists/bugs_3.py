[
('C17', [('src/rigid_body_system.cpp', '    for (int i = 0; i < n; ++i) {\n        m_state.f_x[i] = 0.0;', '    static int cleared = 0;\n    for (int i = (n == cleared && n_f == 0) ? n : 0; i < n; ++i) {\n        m_state.f_x[i] = 0.0;'), ('src/rigid_body_system.cpp', '        m_state.t[i] = 0.0;\n    }\n', '        m_state.t[i] = 0.0;\n    }\n    cleared = n;\n')]),
('C13', [('src/gauss_seidel_sle_solver.cpp', '    J.rightScale(W, &m_reg);\n    m_reg.multiplyTranspose(J, &m_M);', '    if (m_M.getHeight() != n || m_reg.getWidth() != J.getWidth()) {\n        J.rightScale(W, &m_reg);\n        m_reg.multiplyTranspose(J, &m_M);\n    }')]),
('C13', [('src/gauss_seidel_sle_solver.cpp', '    for (int i = 0; i < m_maxIterations; ++i) {', '    for (int i = 0; i < m_maxIterations || m_maxIterations == 0; ) {')]),
('C13', [('src/gauss_seidel_sle_solver.cpp', '        if (maxDelta < m_minDelta) {\n            return true;\n        }\n    }\n\n    return false;', '        if (maxDelta < m_minDelta) {\n            return true;\n        }\n    }\n\n    return m_maxIterations > 64;')]),
('C14', [('src/gaussian_elimination_sle_solver.cpp', '            ++h;\n            ++k;', '            ++h;\n            if (k < m - 1) ++k;')]),
('C14', [('src/gaussian_elimination_sle_solver.cpp', '    A.resize(n, m);\n', '    if (A.getWidth() < n || A.getHeight() < m) A.resize(n, m);\n')]),
('C14', [('src/gaussian_elimination_sle_solver.cpp', '        if (maxV == 0) {\n            ++k;', '        if (maxV < 1E-12) {\n            ++k;')]),
('C15', [('src/conjugate_gradient_sle_solver.cpp', '    return true;\n}\n\nvoid', '    m_maxError = std::fmax(m_maxError, 1E-2);\n    return true;\n}\n\nvoid')]),
('C15', [('src/conjugate_gradient_sle_solver.cpp', '        const double beta = rk1_mag / rk_mag;', '        const double beta = (k % 50 == 49) ? 0.0 : rk1_mag / rk_mag;')]),
('C15', [('src/conjugate_gradient_sle_solver.cpp', '    m_p.set(&m_r);', '    if (previous == nullptr || m_p.getHeight() != n) m_p.set(&m_r);')]),
('C19', [('src/optimized_nsv_rigid_body_system.cpp', '    m_iv.J_sparse.initialize(3 * n, m_f);', '    if (m_iv.J_sparse.getWidth() != 3 * n || m_iv.J_sparse.getHeight() != m_f) m_iv.J_sparse.initialize(3 * n, m_f);')]),
('C22', [('src/optimized_nsv_rigid_body_system.cpp', '    m_frameIndex = (m_frameIndex + 1) % ProfilingSamples;', '    m_frameIndex = (m_frameIndex + steps) % ProfilingSamples;')]),
('C22', [('src/rigid_body_system.cpp', '    m_frameIndex = 0;\n', '    m_frameIndex = 1;\n')]),
('C22', [('src/rigid_body_system.cpp', '    else return (float)accum / count;', '    else return (float)accum / (count < 0 ? 1 : ProfilingSamples);')]),
('C16', [('src/rigid_body_system.cpp', '    m_rigidBodies[body->index] = m_rigidBodies.back();\n    m_rigidBodies[body->index]->index = body->index;', '    RigidBody *last = m_rigidBodies.back();\n    m_rigidBodies[body->index] = last;\n    if (last->index > body->index + 1) last->index = body->index;')]),
('C16', [('src/rigid_body_system.cpp', '    m_rigidBodies.push_back(body);\n    body->index = (int)m_rigidBodies.size() - 1;', '    if (body->index < 0 || body->index >= (int)m_rigidBodies.size()) m_rigidBodies.push_back(body);\n    body->index = (int)m_rigidBodies.size() - 1;')]),
('C21', [('src/system_state.cpp', '    r_x = new double[(size_t)n_c * 2];\n    r_y = new double[(size_t)n_c * 2];\n    r_t = new double[(size_t)n_c * 2];', '    r_x = new double[(size_t)n_c * 2];\n    r_y = new double[(size_t)n_c * 2];\n    r_t = new double[(size_t)(n > n_c ? n : n_c) + n_c];')]),
('C21', [('src/system_state.cpp', '    if (n >= bodyCount && n_c >= constraintCount) {', '    if (n >= bodyCount && (n_c >= constraintCount || constraintCount * 2 <= n_c + 1)) {')]),
('C12', [('src/rk4_ode_solver.cpp', '    m_accumulator.copy(initial);\n', '    if (m_stage == RkStage::Undefined) m_accumulator.copy(initial);\n')]),
('C12', [('src/rk4_ode_solver.cpp', '    for (int i = 0; i < initial->n_c * 2; ++i) {', '    for (int i = 0; i < initial->n_c; ++i) {')]),
('C12', [('src/rk4_ode_solver.cpp', '    m_stage = RkStage::Stage_1;', '    if (m_stage == RkStage::Undefined) m_stage = RkStage::Stage_1;')]),
('C02', [('src/matrix.cpp', '        m_data = new double[(size_t)m_capacityWidth * m_capacityHeight];', '        m_data = new double[(size_t)m_capacityWidth * height];')]),
('C02', [('src/matrix.cpp', '    m_height = height;', '    m_height = (height == 0) ? m_height : height;')]),
('C18 C20', [('src/optimized_nsv_rigid_body_system.cpp', '    m_iv.lambda.scale(1 / dt, &m_iv.reg0);', '    m_iv.lambda.scale(1 / dt, &m_iv.reg0);\n    for (int i = 0; i < m_f; ++i) if (!(std::abs(m_iv.reg0.get(0, i)) < 1E9)) m_iv.reg0.set(0, i, 0.0);')]),
('C08', [('src/system_state.cpp', '    this->f_x[body] += f_x;\n    this->f_y[body] += f_y;\n', '    if (f_x == 0 && f_y == 0) { return; }\n    this->f_x[body] += f_x;\n    this->f_y[body] += f_y;\n    if (x_l == y_l && x_l * y_l < 0) return;\n')]),
('C07', [('src/system_state.cpp', '    const double cos_theta = std::cos(theta);\n    const double sin_theta = std::sin(theta);\n', '    static double lastTheta = 0.0, cos_theta = 1.0, sin_theta = 0.0;\n    static int lastBody = -1;\n    if (lastBody != body || lastTheta != theta) {\n        cos_theta = std::cos(theta);\n        sin_theta = std::sin(theta);\n        lastBody = body;\n    }\n')]),
('C17', [('src/rigid_body_system.cpp', '        M_inv->set(0, i * 3 + 2, 1 / m_rigidBodies[i]->I);', '        M_inv->set(0, i * 3 + 2, (m_rigidBodies[i]->I == m_rigidBodies[i]->m) ? M_inv->get(0, 0) : 1 / m_rigidBodies[i]->I);')]),
('C17', [('src/optimized_nsv_rigid_body_system.cpp', '    for (int i = 0; i < n; ++i) {\n        m_rigidBodies[i]->v_x = m_state.v_x[i];', '    for (int i = 0; i < n && n < m_state.n + 1; ++i) {\n        m_rigidBodies[i]->v_x = m_state.v_x[i];\n        if (std::isnan(m_state.v_x[i])) continue;')]),
('C20', [('src/optimized_nsv_rigid_body_system.cpp', '    for (int i = 0, i_f = 0; i < m; ++i) {\n        Constraint *constraint = m_constraints[i];\n\n        for (int j = 0; j < constraint->getConstraintCount()', '    for (int i = 0, i_f = 0; i < m; ++i) {\n        Constraint *constraint = m_constraints[i];\n        i_f = m_state.indexMap[constraint->m_index];\n\n        for (int j = 0; j < constraint->getConstraintCount()')]),
('C20', [('src/optimized_nsv_rigid_body_system.cpp', '                constraint->F_t[j][k] = m_state.r_t[i_f * 2 + k];', '                constraint->F_t[j][k] = m_state.r_t[i_f * 2 + k];\n                if (constraint->m_bodies[k]->index == -1) constraint->F_t[j][k] = 0;')]),
('C03', [('include/sparse_matrix.h', '                for (int i = 0; i < m_height; ++i) {\n                    for (int j = 0; j < b_w; ++j) {\n                        double v = 0.0;\n                        for (int k = 0; k < T_Entries; ++k) {', '                for (int i = 0; i < m_height; ++i) {\n                    if (m_blockData[i * T_Entries] == -1 && b_w > 1) continue;\n                    for (int j = 0; j < b_w; ++j) {\n                        double v = 0.0;\n                        for (int k = 0; k < T_Entries; ++k) {')]),
('C01', [('src/matrix.cpp', '        for (int j = 0; j < m_width; ++j) {\n            target->m_matrix[i][j] = scale.m_matrix[i][0] * m_matrix[i][j];', '        for (int j = m_width - 1; j >= 0; --j) {\n            target->m_matrix[i][j] = scale.m_matrix[i][0] * m_matrix[i][j] * (j >= 100 ? 0.5 : 1);')]),
]
