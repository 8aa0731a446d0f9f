[('C13', [('src/gauss_seidel_sle_solver.cpp', '        double s0 = 0.0, s1 = 0.0;\n        for (int j = 0; j < i; ++j) {\n            s0 += left.get(j, i) * k_next->get(0, j);\n        }\n\n        for (int j = i + 1; j < n; ++j) {\n            s1 += left.get(j, i) * k->get(0, j);\n        }\n\n        const double k_next_i =\n            (1 / left.get(i, i)) * (right.get(0, i) - s0 - s1);\n\n        const double min_k', '        double s = 0.0;\n        for (int j = 0; j < n; ++j) {\n            if (j == i) continue;\n            s += left.get(j, i) * ((j < i) ? k_next->get(0, j) : k->get(0, j));\n        }\n\n        const double k_next_i = (right.get(0, i) - s) / left.get(i, i);\n\n        const double min_k')]), ('C13', [('src/gauss_seidel_sle_solver.cpp', '        const double x = std::fmax(limitMin, std::fmin(limitMax, k_next_i));\n', '        double x = k_next_i;\n        if (x > limitMax) x = limitMax;\n        if (x < limitMin) x = limitMin;\n')]), ('C13', [('src/gauss_seidel_sle_solver.cpp', 'double atg_scs::GaussSeidelSleSolver::solveIteration(\n        Matrix &left,\n        Matrix &right,\n        Matrix *k_next,\n        Matrix *k)\n{', 'static double offDiagonal(atg_scs::Matrix &left, atg_scs::Matrix *k_next, atg_scs::Matrix *k, int i, int n) {\n    double s = 0.0;\n    for (int j = 0; j < i; ++j) {\n        s += left.get(j, i) * k_next->get(0, j);\n    }\n    for (int j = i + 1; j < n; ++j) {\n        s += left.get(j, i) * k->get(0, j);\n    }\n    return s;\n}\n\ndouble atg_scs::GaussSeidelSleSolver::solveIteration(\n        Matrix &left,\n        Matrix &right,\n        Matrix *k_next,\n        Matrix *k)\n{'), ('src/gauss_seidel_sle_solver.cpp', '        double s0 = 0.0, s1 = 0.0;\n        for (int j = 0; j < i; ++j) {\n            s0 += left.get(j, i) * k_next->get(0, j);\n        }\n\n        for (int j = i + 1; j < n; ++j) {\n            s1 += left.get(j, i) * k->get(0, j);\n        }\n', '        const double s = offDiagonal(left, k_next, k, i, n);\n', 1), ('src/gauss_seidel_sle_solver.cpp', ' - s0 - s1)', ' - s)', 1)]), ('C13', [('src/gauss_seidel_sle_solver.cpp', '    for (int i = 0; i < m_maxIterations; ++i) {\n        const double maxDelta = solveIteration(\n                m_M,\n                right,\n                result,\n                result);\n\n        if (maxDelta < m_minDelta) {\n            return true;\n        }\n    }\n\n    return false;\n}\n', '    bool converged = false;\n    for (int i = 0; i < m_maxIterations && !converged; ++i) {\n        converged = solveIteration(m_M, right, result, result) < m_minDelta;\n    }\n\n    return converged;\n}\n')]), ('C13', [('src/gauss_seidel_sle_solver.cpp', '    for (int i = 0; i < m_maxIterations; ++i) {\n        const double maxDelta = solveIteration(\n            m_M,', '    for (int i = m_maxIterations; i > 0; --i) {\n        const double maxDelta = solveIteration(\n            m_M,')]), ('C13', [('src/gauss_seidel_sle_solver.cpp', '        maxDifference = (delta > maxDifference || std::isnan(delta))\n            ? delta\n            : maxDifference;\n', '        if (delta > maxDifference || std::isnan(delta)) {\n            maxDifference = delta;\n        }\n', 1)]), ('C15', [('src/conjugate_gradient_sle_solver.cpp', '    if (sufficientlySmall(m_r, right)) {\n        goto succeeded;\n    }\n\n    m_p.set', '    if (sufficientlySmall(m_r, right)) {\n        result->set(&m_x);\n        return true;\n    }\n\n    m_p.set'), ('src/conjugate_gradient_sle_solver.cpp', '            goto succeeded;\n        }\n', '            result->set(&m_x);\n            return true;\n        }\n'), ('src/conjugate_gradient_sle_solver.cpp', 'succeeded:\n    result->set(&m_x);\n\n    return true;\n', '')]), ('C15', [('src/conjugate_gradient_sle_solver.cpp', '    m_p.set(&m_r);\n\n', '    m_p.set(&m_r);\n    double rk_mag = m_r.vectorMagnitudeSquared();\n\n'), ('src/conjugate_gradient_sle_solver.cpp', '        const double rk_mag = m_r.vectorMagnitudeSquared();\n        const double alpha', '        const double alpha'), ('src/conjugate_gradient_sle_solver.cpp', '        m_p.pmadd(m_r, beta);\n', '        m_p.pmadd(m_r, beta);\n        rk_mag = rk1_mag;\n')]), ('C15', [('src/conjugate_gradient_sle_solver.cpp', '        if (!(std::abs(err) <= std::fmax(std::abs(m_maxError * t), m_minError))) {\n            return false;\n        }\n    }\n\n    return true;', '        const double tolerance = std::fmax(std::abs(m_maxError * t), m_minError);\n        const bool ok = std::abs(err) <= tolerance;\n        if (!ok) return false;\n    }\n\n    return true;')]), ('C15', [('src/conjugate_gradient_sle_solver.cpp', '    for (int i = 0; i < x.getHeight(); ++i) {\n        const double err = x.get(0, i);\n        const double t = target.get(0, i);\n        if (!(std::abs(err) <= std::fmax(std::abs(m_maxError * t), m_minError))) {\n            return false;\n        }\n    }\n\n    return true;', '    bool small = true;\n    const int n = x.getHeight();\n    for (int i = 0; i < n && small; ++i) {\n        const double bound = std::abs(m_maxError * target.get(0, i));\n        small = std::abs(x.get(0, i)) <= ((bound > m_minError) ? bound : m_minError);\n    }\n\n    return small;')]), ('C18 C19 C20', [('src/generic_rigid_body_system.cpp', '            for (int i = 0; i < m_constraints[j]->m_bodyCount * 3; ++i) {\n                const int index = m_constraints[j]->m_bodies[i / 3]->index;\n\n                if (index == -1) continue;\n\n                m_iv.J_sparse.set(j_f, i / 3, i % 3,\n                        constraintOutput.J[k][i]);\n\n                m_iv.J_dot_sparse.set(j_f, i / 3, i % 3,\n                        constraintOutput.J_dot[k][i]);\n', '            for (int i = 0; i < m_constraints[j]->m_bodyCount; ++i) {\n                const int index = m_constraints[j]->m_bodies[i]->index;\n\n                if (index == -1) continue;\n\n                for (int c = 0; c < 3; ++c) {\n                    m_iv.J_sparse.set(j_f, i, c, constraintOutput.J[k][i * 3 + c]);\n                    m_iv.J_dot_sparse.set(j_f, i, c, constraintOutput.J_dot[k][i * 3 + c]);\n                }\n')]), ('C18', [('src/generic_rigid_body_system.cpp', '    for (int i = 0; i < n; ++i) {\n        m_state.a_x[i] = m_iv.F_ext.get(0, i * 3 + 0);\n        m_state.a_y[i] = m_iv.F_ext.get(0, i * 3 + 1);\n        m_state.a_theta[i] = m_iv.F_ext.get(0, i * 3 + 2);\n    }\n', '    for (int i = 0; i < n; ++i) {\n        m_state.a_x[i] = m_state.f_x[i];\n        m_state.a_y[i] = m_state.f_y[i];\n        m_state.a_theta[i] = m_state.t[i];\n    }\n')]), ('C18 C19 C20', [('src/generic_rigid_body_system.cpp', '        m_constraints[j]->calculate(&constraintOutput, &m_state);\n\n        const int n_f = m_constraints[j]->getConstraintCount();', '        Constraint *constraint = m_constraints[j];\n        constraint->calculate(&constraintOutput, &m_state);\n\n        const int n_f = constraint->getConstraintCount();')]), ('C18', [('src/generic_rigid_body_system.cpp', '        m_state.a_x[i] *= invMass;\n        m_state.a_y[i] *= invMass;\n        m_state.a_theta[i] *= invInertia;\n', '        m_state.a_theta[i] = invInertia * m_state.a_theta[i];\n        m_state.a_y[i] = invMass * m_state.a_y[i];\n        m_state.a_x[i] = invMass * m_state.a_x[i];\n')]), ('C19', [('src/generic_rigid_body_system.cpp', '    for (int i = 0; i < m_f; ++i) {\n        m_iv.kd.set(0, i, m_iv.kd.get(0, i) * (m_iv.reg0.get(0, i) + m_iv.v_bias.get(0, i)));\n        m_iv.ks.set(0, i, m_iv.ks.get(0, i) * m_iv.C.get(0, i));\n    }\n', '    for (int i = 0; i < m_f; ++i) {\n        const double rate = m_iv.reg0.get(0, i) + m_iv.v_bias.get(0, i);\n        const double damping = m_iv.kd.get(0, i) * rate;\n        const double spring = m_iv.ks.get(0, i) * m_iv.C.get(0, i);\n        m_iv.ks.set(0, i, spring);\n        m_iv.kd.set(0, i, damping);\n    }\n')]), ('C17', [('src/generic_rigid_body_system.cpp', '    for (int i = 0; i < n; ++i) {\n        m_rigidBodies[i]->v_x = m_state.v_x[i];\n        m_rigidBodies[i]->v_y = m_state.v_y[i];\n\n        m_rigidBodies[i]->p_x = m_state.p_x[i];\n        m_rigidBodies[i]->p_y = m_state.p_y[i];\n\n        m_rigidBodies[i]->v_theta = m_state.v_theta[i];\n        m_rigidBodies[i]->theta = m_state.theta[i];\n    }\n', '    auto store = [this](RigidBody *body, int k) {\n        body->p_x = m_state.p_x[k];\n        body->p_y = m_state.p_y[k];\n        body->theta = m_state.theta[k];\n\n        body->v_x = m_state.v_x[k];\n        body->v_y = m_state.v_y[k];\n        body->v_theta = m_state.v_theta[k];\n    };\n\n    for (int i = n - 1; i >= 0; --i) {\n        store(m_rigidBodies[i], i);\n    }\n')]), ('C22', [('src/generic_rigid_body_system.cpp', '        while (true) {\n            const bool done = m_odeSolver->step(&m_state);\n', '        bool done;\n        do {\n            done = m_odeSolver->step(&m_state);\n'), ('src/generic_rigid_body_system.cpp', '\n            if (done) break;\n        }\n', '        } while (!done);\n')]), ('C22', [('src/generic_rigid_body_system.cpp', '    for (int i = 0; i < steps; ++i) {\n        m_odeSolver->start(&m_state, dt / steps);\n', '    const double stepSize = dt / steps;\n    for (int i = steps; i > 0; --i) {\n        m_odeSolver->start(&m_state, stepSize);\n')]), ('C22', [('src/generic_rigid_body_system.cpp', '    m_frameIndex = (m_frameIndex + 1) % ProfilingSamples;\n', '    if (++m_frameIndex == ProfilingSamples) {\n        m_frameIndex = 0;\n    }\n')]), ('C12', [('src/rk4_ode_solver.cpp', '    for (int i = 0; i < system->n; ++i) {\n        m_accumulator.v_theta[i] += (m_dt / 6.0) * system->a_theta[i] * stageWeight;\n        m_accumulator.theta[i] += (m_dt / 6.0) * system->v_theta[i] * stageWeight;\n        m_accumulator.v_x[i] += (m_dt / 6.0) * system->a_x[i] * stageWeight;\n        m_accumulator.v_y[i] += (m_dt / 6.0) * system->a_y[i] * stageWeight;\n        m_accumulator.p_x[i] += (m_dt / 6.0) * system->v_x[i] * stageWeight;\n        m_accumulator.p_y[i] += (m_dt / 6.0) * system->v_y[i] * stageWeight;\n    }\n', '    const double w = m_dt * stageWeight / 6.0;\n    const int n = system->n;\n    for (int i = 0; i < n; ++i) {\n        m_accumulator.p_x[i] += w * system->v_x[i];\n        m_accumulator.p_y[i] += w * system->v_y[i];\n        m_accumulator.theta[i] += w * system->v_theta[i];\n    }\n    for (int i = 0; i < n; ++i) {\n        m_accumulator.v_x[i] += w * system->a_x[i];\n        m_accumulator.v_y[i] += w * system->a_y[i];\n        m_accumulator.v_theta[i] += w * system->a_theta[i];\n    }\n')]), ('C12', [('src/rk4_ode_solver.cpp', '            for (int i = 0; i < state->n; ++i) {\n                state->theta[i] =\n                    m_initialState.theta[i] + m_dt * state->v_theta[i];\n                state->v_theta[i] =\n                    m_initialState.v_theta[i] + m_dt * state->a_theta[i];\n                state->p_x[i] =\n                    m_initialState.p_x[i] + m_dt * state->v_x[i];\n                state->p_y[i] =\n                    m_initialState.p_y[i] + m_dt * state->v_y[i];\n                state->v_x[i] =\n                    m_initialState.v_x[i] + m_dt * state->a_x[i];\n                state->v_y[i] =\n                    m_initialState.v_y[i] + m_dt * state->a_y[i];\n            }\n', '            advance(m_initialState, state, m_dt);\n'), ('src/rk4_ode_solver.cpp', 'bool atg_scs::Rk4OdeSolver::step(', 'static void advance(const atg_scs::SystemState &initial, atg_scs::SystemState *state, double h) {\n    for (int i = 0; i < state->n; ++i) {\n        state->theta[i] = initial.theta[i] + h * state->v_theta[i];\n        state->v_theta[i] = initial.v_theta[i] + h * state->a_theta[i];\n        state->p_x[i] = initial.p_x[i] + h * state->v_x[i];\n        state->p_y[i] = initial.p_y[i] + h * state->v_y[i];\n        state->v_x[i] = initial.v_x[i] + h * state->a_x[i];\n        state->v_y[i] = initial.v_y[i] + h * state->a_y[i];\n    }\n}\n\nbool atg_scs::Rk4OdeSolver::step('), ('src/rk4_ode_solver.cpp', '            for (int i = 0; i < state->n; ++i) {\n                state->theta[i] =\n                    m_initialState.theta[i] + m_dt * state->v_theta[i] / 2.0;\n                state->v_theta[i] =\n                    m_initialState.v_theta[i] + m_dt * state->a_theta[i] / 2.0;\n                state->p_x[i] =\n                    m_initialState.p_x[i] + m_dt * state->v_x[i] / 2.0;\n                state->p_y[i] =\n                    m_initialState.p_y[i] + m_dt * state->v_y[i] / 2.0;\n                state->v_x[i] =\n                    m_initialState.v_x[i] + m_dt * state->a_x[i] / 2.0;\n                state->v_y[i] =\n                    m_initialState.v_y[i] + m_dt * state->a_y[i] / 2.0;\n            }\n', '            advance(m_initialState, state, m_dt / 2.0);\n')]), ('C12', [('src/rk4_ode_solver.cpp', '    switch (stage) {\n        case RkStage::Stage_1: return RkStage::Stage_2;\n        case RkStage::Stage_2: return RkStage::Stage_3;\n        case RkStage::Stage_3: return RkStage::Stage_4;\n        case RkStage::Stage_4: return RkStage::Complete;\n        default: return RkStage::Undefined;\n    }\n', '    if (stage == RkStage::Stage_1) return RkStage::Stage_2;\n    if (stage == RkStage::Stage_2) return RkStage::Stage_3;\n    if (stage == RkStage::Stage_3) return RkStage::Stage_4;\n    return (stage == RkStage::Stage_4) ? RkStage::Complete : RkStage::Undefined;\n')]), ('C12', [('src/rk4_ode_solver.cpp', '    for (int i = 0; i < initial->n_c * 2; ++i) {\n        m_accumulator.r_x[i] = 0.0;\n        m_accumulator.r_y[i] = 0.0;\n        m_accumulator.r_t[i] = 0.0;\n    }\n', '    const int reactions = 2 * m_accumulator.n_c;\n    for (int i = 0; i < reactions; ++i) {\n        m_accumulator.r_x[i] = m_accumulator.r_y[i] = m_accumulator.r_t[i] = 0.0;\n    }\n')]), ('C11', [('src/euler_ode_solver.cpp', '        system->p_x[i] += system->v_x[i] * m_dt;\n        system->p_y[i] += system->v_y[i] * m_dt;\n        system->theta[i] += system->v_theta[i] * m_dt;\n\n        system->v_x[i] += system->a_x[i] * m_dt;\n', '        const double v_x0 = system->v_x[i];\n        system->v_x[i] += system->a_x[i] * m_dt;\n        system->p_x[i] += v_x0 * m_dt;\n        system->p_y[i] += system->v_y[i] * m_dt;\n        system->theta[i] += system->v_theta[i] * m_dt;\n\n')]), ('C11', [('src/nsv_ode_solver.cpp', '        system->v_theta[i] += system->a_theta[i] * m_dt;\n\n        system->p_x', '        system->v_theta[i] += system->a_theta[i] * m_dt;\n    }\n\n    for (int i = 0; i < system->n; ++i) {\n        system->p_x')]), ('C21', [('src/system_state.cpp', '    resize(state->n, state->n_c);\n\n    const int n = state->n;\n    const int n_c = state->n_c;\n', '    const int n = state->n;\n    const int n_c = state->n_c;\n\n    resize(n, n_c);\n'), ('src/system_state.cpp', '    std::memcpy((void *)m, (void *)state->m, sizeof(double) * n);\n', '    for (int i = 0; i < n; ++i) m[i] = state->m[i];\n')]), ('C07 C08', [('src/system_state.cpp', '    double w_x, w_y;\n    localToWorld(x_l, y_l, &w_x, &w_y, body);\n\n    this->f_x[body] += f_x;\n    this->f_y[body] += f_y;\n\n    this->t[body] +=\n        (w_y - this->p_y[body]) * -f_x +\n        (w_x - this->p_x[body]) * f_y;', '    double w_x, w_y;\n    localToWorld(x_l, y_l, &w_x, &w_y, body);\n\n    const double arm_x = w_x - this->p_x[body];\n    const double arm_y = w_y - this->p_y[body];\n\n    this->t[body] += arm_x * f_y - arm_y * f_x;\n\n    this->f_x[body] += f_x;\n    this->f_y[body] += f_y;')]), ('C07 C08', [('src/system_state.cpp', '    double w_x, w_y;\n    localToWorld(x, y, &w_x, &w_y, body);\n\n    const double v_theta', '    const double c = std::cos(this->theta[body]), s = std::sin(this->theta[body]);\n    const double w_x = c * x - s * y + this->p_x[body];\n    const double w_y = s * x + c * y + this->p_y[body];\n\n    const double v_theta')]), ('C21', [('src/system_state.cpp', '    if (n >= bodyCount && n_c >= constraintCount) {\n        return;\n    }\n', '    const bool fits = !(bodyCount > n || constraintCount > n_c);\n    if (fits) return;\n')]), ('C13', [('src/gauss_seidel_sle_solver.cpp', '    J.rightScale(W, &m_reg);\n    m_reg.multiplyTranspose(J, &m_M);\n', '    SparseMatrix<3> *scaled = &m_reg;\n    J.rightScale(W, scaled);\n    scaled->multiplyTranspose(J, &m_M);\n', 1)])]