[
('C13', [('src/gauss_seidel_sle_solver.cpp', '(delta > maxDifference || std::isnan(delta))', '(delta > maxDifference)')]),
('C13', [('src/gauss_seidel_sle_solver.cpp', '        const double x = std::fmax(limitMin, std::fmin(limitMax, k_next_i));', '        const double x = std::fmin(limitMax, std::fmax(limitMin, k_next_i));')]),
('C15', [('src/conjugate_gradient_sle_solver.cpp', '!(std::abs(err) <= std::fmax(std::abs(m_maxError * t), m_minError))', 'std::abs(err) > std::fmax(std::abs(m_maxError * t), m_minError)')]),
('C15', [('src/conjugate_gradient_sle_solver.cpp', 'std::fmax(std::abs(m_maxError * t), m_minError)', 'std::fmax(m_maxError * t, m_minError)')]),
('C15', [('src/conjugate_gradient_sle_solver.cpp', '    if (sufficientlySmall(m_r, right)) {\n        goto succeeded;\n    }\n\n    m_p.set', '    if (previous != nullptr && sufficientlySmall(m_r, right)) {\n        goto succeeded;\n    }\n\n    m_p.set')]),
('C14', [('src/gaussian_elimination_sle_solver.cpp', '        if (A.get(i, i) != 0) {', '        if (fastAbs(A.get(i, i)) > 1E-8) {')]),
('C14', [('src/gaussian_elimination_sle_solver.cpp', '            for (int i = h + 1; i < m; ++i) {\n                const double f', '            for (int i = h + 1; i < m; ++i) {\n                if (A.get(k, i) == A.get(k, h)) continue;\n                const double f')]),
('C13', [('src/gauss_seidel_sle_solver.cpp', 'previous->getHeight() == n', 'previous->getHeight() >= n')]),
('C13', [('src/gauss_seidel_sle_solver.cpp', '    if (result->getHeight() != n) {\n        result->initialize(1, n);', '    if (result->getHeight() < n) {\n        result->initialize(1, n);')]),
('C11', [('src/euler_ode_solver.cpp', 'system->p_x[i] += system->v_x[i] * m_dt;', 'system->p_x[i] += system->v_x[i] * system->dt;')]),
('C11', [('src/nsv_ode_solver.cpp', '    system->dt = m_dt;\n    return true;', '    return true;')]),
('C11', [('src/ode_solver.cpp', 'm_dt = dt;', 'm_dt = (dt > 0) ? dt : m_dt;')]),
('C22', [('src/rigid_body_system.cpp', '        if (samples[i] != -1) {', '        if (samples[i] >= 0) {')]),
('C22', [('src/rigid_body_system.cpp', '    long long accum = 0;', '    int accum = 0;')]),
('C22', [('src/rigid_body_system.cpp', '    return findAverage(m_constraintEvalMicroseconds);', '    return findAverage(m_constraintSolveMicroseconds);')]),
('C22', [('src/optimized_nsv_rigid_body_system.cpp', '    m_t += dt;', '    m_t += steps * (double)(float)(dt / steps);')]),
('C16', [('src/rigid_body_system.cpp', '    m_rigidBodies.clear();\n', '    m_rigidBodies.resize(0);\n    m_frameIndex = 0;\n')]),
('C17', [('src/rigid_body_system.cpp', '    m_state.resize(n, n_c);\n', '    if (n != m_state.n || n_c != m_state.n_c) { m_state.destroy(); m_state.resize(n, n_c); }\n')]),
('C17', [('src/rigid_body_system.cpp', '        m_state.a_x[i] = 0;\n        m_state.a_y[i] = 0;\n', '')]),
('C17', [('src/rigid_body_system.cpp', '        m_state.f_x[i] = 0.0;\n', '        m_state.f_x[i] *= 0.0;\n')]),
('C21', [('src/system_state.cpp', '    n = 0;\n    n_c = 0;\n}\n\nvoid atg_scs::SystemState::localToWorld', '    n = 0;\n}\n\nvoid atg_scs::SystemState::localToWorld')]),
('C21', [('src/system_state.cpp', '        freeArray(r_t);\n', '        if (n_c > 0) freeArray(r_t);\n')]),
('C21', [('src/system_state.cpp', 'sizeof(double) * n_c * 2);\n    std::memcpy((void *)r_y', 'sizeof(double) * (n_c + n_c / 2 + (n_c & 1)) );\n    std::memcpy((void *)r_y')]),
('C10', [('src/rigid_body.cpp', '    index = -1;\n    reset();', '    reset();')]),
('C10', [('src/rigid_body.cpp', '    m = 0.0;\n    I = 0.0;\n', '    m = 0.0;\n')]),
]
